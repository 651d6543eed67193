//! Adapts the crate generated by specr-transpile to the symbolic `libspecr`:
//! the primitive `u8` (which cannot be symbolic) becomes `libspecr::Byte`.
//!
//! * type `u8` -> `::libspecr::Byte` (bool/usize/u32/... stay native)
//! * integer literals (and ranges of them) in patterns -> a binding and a guard, since `Byte` is not
//!   a primitive
//! * `...::Init(x, ..)` -> `...::Init(mk_byte(x), ..)`, `x as u8` -> `mk_byte(x)`,
//!   `let x: u8 = e` -> `mk_byte(e)`
//! Everything else is left alone.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Rw {
    n: usize,
    lits: usize,
    bytes: usize,
    /// Insert coverage markers?
    cov: bool,
    file: String,
    path: Vec<String>,
    arms: usize,
    sites: usize,
}

impl Rw {
    fn site(&mut self, what: &str) -> String {
        self.sites += 1;
        let p = self.path.join("::");
        format!("{}::{p}{what}", self.file)
    }
    fn named<O>(&mut self, name: String, f: impl FnOnce(&mut Self) -> O) -> O {
        self.path.push(name);
        let arms = std::mem::take(&mut self.arms);
        let r = f(self);
        self.arms = arms;
        self.path.pop();
        r
    }
    fn fn_block(&mut self, sig: &Signature, b: &mut Block) {
        if self.cov && sig.constness.is_none() {
            let s = self.site("");
            b.stmts.insert(0, parse_quote!(::libspecr::cov!(#s);));
        }
    }
}

fn is_int_lit(p: &Pat) -> bool {
    match p {
        Pat::Lit(PatLit { lit: Lit::Int(_), .. }) => true,
        Pat::Range(_) => true,
        Pat::Paren(p) => is_int_lit(&p.pat),
        Pat::Or(p) => p.cases.iter().all(is_int_lit),
        _ => false,
    }
}
fn lit_guard(p: &Pat, id: &Ident) -> Option<TokenStream> {
    Some(match p {
        Pat::Lit(l) => quote!(::libspecr::lit_eq(&#id, #l)),
        Pat::Paren(p) => return lit_guard(&p.pat, id),
        Pat::Or(p) => {
            let cs: Option<Vec<_>> = p.cases.iter().map(|c| lit_guard(c, id)).collect();
            let cs = cs?;
            quote!((#(#cs)||*))
        }
        Pat::Range(r) => {
            // only for plain integer bounds
            let ok = |e: &Option<Box<Expr>>| match e.as_deref() {
                None => true,
                Some(Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) => true,
                _ => false,
            };
            if !ok(&r.start) || !ok(&r.end) {
                return None;
            }
            let lo = r.start.as_ref().map(|s| quote!(::libspecr::lit_ge(&#id, #s)));
            let hi = r.end.as_ref().map(|e| match r.limits {
                RangeLimits::HalfOpen(_) => quote!(!::libspecr::lit_ge(&#id, #e)),
                RangeLimits::Closed(_) => quote!(::libspecr::lit_le(&#id, #e)),
            });
            let mut cs: Vec<TokenStream> = vec![];
            cs.extend(lo);
            cs.extend(hi);
            if cs.is_empty() {
                return None;
            }
            quote!((#(#cs)&&*))
        }
        _ => return None,
    })
}

/// Replaces integer literals inside a pattern; collects the guards.
struct PatLits<'a> {
    rw: &'a mut Rw,
    guards: Vec<TokenStream>,
}
impl VisitMut for PatLits<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if is_int_lit(p) {
            let id = format_ident!("__lit{}", self.rw.n);
            if let Some(g) = lit_guard(p, &id) {
                self.rw.n += 1;
                self.rw.lits += 1;
                self.guards.push(g);
                *p = parse_quote!(#id);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_expr_mut(&mut self, _: &mut Expr) {}
}
impl Rw {
    fn strip(&mut self, p: &mut Pat) -> Option<TokenStream> {
        let mut v = PatLits { rw: self, guards: vec![] };
        v.visit_pat_mut(p);
        if v.guards.is_empty() {
            return None;
        }
        let gs = &v.guards;
        Some(quote!(#(#gs)&&*))
    }
    fn has_lits(p: &Pat) -> bool {
        let mut p = p.clone();
        Rw { n: 0, ..Default::default() }.strip(&mut p).is_some()
    }
    /// Top-level alternatives of a pattern.
    fn alts(p: Pat) -> Vec<Pat> {
        match p {
            Pat::Or(o) => o.cases.into_iter().flat_map(Rw::alts).collect(),
            Pat::Paren(p) => Rw::alts(*p.pat),
            p => vec![p],
        }
    }
    fn match_arms(&mut self, m: &mut ExprMatch) {
        let mut out = vec![];
        for arm in std::mem::take(&mut m.arms) {
            if !Rw::has_lits(&arm.pat) {
                out.push(arm);
                continue;
            }
            // One arm per alternative, each with its own guard.
            for alt in Rw::alts(arm.pat.clone()) {
                let mut a = arm.clone();
                a.pat = alt;
                if let Some(g) = self.strip(&mut a.pat) {
                    let cond: Expr = match a.guard.take() {
                        Some((_, e)) => parse_quote!(#g && #e),
                        None => parse2(g).unwrap(),
                    };
                    a.guard = Some((Default::default(), Box::new(cond)));
                }
                a.comma = Some(Default::default());
                out.push(a);
            }
        }
        // Guards are not considered by the exhaustiveness check.
        m.arms = out;
    }
}

struct MatchesArgs {
    e: Expr,
    p: Pat,
    g: Option<Expr>,
}
impl parse::Parse for MatchesArgs {
    fn parse(s: parse::ParseStream) -> Result<Self> {
        let e = s.parse()?;
        s.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(s)?;
        let g = if s.peek(Token![if]) {
            s.parse::<Token![if]>()?;
            Some(s.parse()?)
        } else {
            None
        };
        let _ = s.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs { e, p, g })
    }
}
struct ExprList(punctuated::Punctuated<Expr, Token![,]>);
impl parse::Parse for ExprList {
    fn parse(s: parse::ParseStream) -> Result<Self> {
        Ok(ExprList(punctuated::Punctuated::parse_terminated(s)?))
    }
}
struct ExprRep(Expr, Expr);
impl parse::Parse for ExprRep {
    fn parse(s: parse::ParseStream) -> Result<Self> {
        let a = s.parse()?;
        s.parse::<Token![;]>()?;
        Ok(ExprRep(a, s.parse()?))
    }
}

impl VisitMut for Rw {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.named(f.sig.ident.to_string(), |s| {
            visit_mut::visit_item_fn_mut(s, f);
            s.fn_block(&f.sig, &mut f.block);
        })
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.named(f.sig.ident.to_string(), |s| {
            visit_mut::visit_impl_item_fn_mut(s, f);
            s.fn_block(&f.sig, &mut f.block);
        })
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let name = match &*i.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => "?".into(),
        };
        self.named(name, |s| visit_mut::visit_item_impl_mut(s, i))
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if self.cov && !self.path.is_empty() {
            self.arms += 1;
            let s = self.site(&format!("#{}", self.arms));
            let body = &a.body;
            a.body = parse_quote!({ ::libspecr::cov!(#s); #body });
            a.comma = Some(Default::default());
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if self.cov && !self.path.is_empty() {
            self.arms += 1;
            let s = self.site(&format!("#{}", self.arms));
            i.then_branch.stmts.insert(0, parse_quote!(::libspecr::cov!(#s);));
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.is_ident("u8") {
                self.bytes += 1;
                *t = parse_quote!(::libspecr::Byte);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(pt) = &l.pat {
            if matches!(&*pt.ty, Type::Path(p) if p.path.is_ident("u8")) {
                if let Some(i) = &mut l.init {
                    let e = i.expr.clone();
                    i.expr = parse_quote!(::libspecr::mk_byte(#e));
                }
            }
        }
        // `let PAT = e else { .. };` with literals
        if l.init.as_ref().is_some_and(|i| i.diverge.is_some()) && Rw::has_lits(&l.pat) {
            let mut binders = vec![];
            struct B<'a>(&'a mut Vec<Ident>);
            impl VisitMut for B<'_> {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                    self.0.push(p.ident.clone());
                    visit_mut::visit_pat_ident_mut(self, p)
                }
            }
            B(&mut binders).visit_pat_mut(&mut l.pat);
            binders.retain(|i| i.to_string().chars().next().unwrap().is_lowercase());
            let mut pat = l.pat.clone();
            let g = self.strip(&mut pat).unwrap();
            let i = l.init.as_mut().unwrap();
            let (_, div) = i.diverge.take().unwrap();
            let e = &i.expr;
            i.expr = parse_quote!(match #e { #pat if #g => (#(#binders,)*), _ => #div });
            l.pat = parse_quote!((#(#binders,)*));
        }
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Match(m) => self.match_arms(m),
            Expr::Cast(c) => {
                if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("u8")) {
                    let x = c.expr.clone();
                    *e = parse_quote!(::libspecr::mk_byte(#x));
                    self.bytes += 1;
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() > 1 && p.path.segments[0].ident == "u8" {
                    let rest: Vec<_> = p.path.segments.iter().skip(1).collect();
                    *e = parse_quote!(::libspecr::Byte::#(#rest)::*);
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().is_some_and(|s| s.ident == "Init") && c.args.len() == 2 {
                        let x = c.args[0].clone();
                        c.args[0] = parse_quote!(::libspecr::mk_byte(#x));
                        self.bytes += 1;
                    }
                }
            }
            Expr::Let(l) => {
                if Rw::has_lits(&l.pat) {
                    // `if let P = e` -> `if let P' = e && guard` is only possible in a condition; a
                    // `match` to bool loses the bindings, so this relies on let chains.
                    let mut p = (*l.pat).clone();
                    let g = self.strip(&mut p).unwrap();
                    let ex = &l.expr;
                    let s = quote!(if let #p = #ex && #g {});
                    let Expr::If(i) = parse2::<Expr>(s).unwrap() else { unreachable!() };
                    *e = *i.cond;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "matches" {
            if let Ok(mut a) = parse2::<MatchesArgs>(m.tokens.clone()) {
                self.visit_expr_mut(&mut a.e);
                let mut conds = vec![];
                for mut p in if Rw::has_lits(&a.p) { Rw::alts(a.p.clone()) } else { vec![a.p.clone()] } {
                    let g = self.strip(&mut p);
                    conds.push((p, g));
                }
                let mut user = a.g.clone();
                if let Some(u) = &mut user {
                    self.visit_expr_mut(u);
                }
                let ex = &a.e;
                if conds.len() == 1 {
                    let (p, g) = &conds[0];
                    m.tokens = match (g, user) {
                        (None, None) => quote!(#ex, #p),
                        (Some(g), None) => quote!(#ex, #p if #g),
                        (None, Some(u)) => quote!(#ex, #p if #u),
                        (Some(g), Some(u)) => quote!(#ex, #p if #g && #u),
                    };
                } else {
                    // `matches!(match e { p1 if g1 => true, ..., _ => false }, true)`
                    let arms = conds.iter().map(|(p, g)| {
                        let mut cs: Vec<TokenStream> = vec![];
                        cs.extend(g.clone());
                        cs.extend(user.as_ref().map(|u| quote!(#u)));
                        if cs.is_empty() { quote!(#p => true,) } else { quote!(#p if #(#cs)&&* => true,) }
                    });
                    m.tokens = quote!(match #ex { #(#arms)* _ => false }, true);
                }
            }
            return;
        }
        if let Ok(mut l) = parse2::<ExprList>(m.tokens.clone()) {
            for e in l.0.iter_mut() {
                self.visit_expr_mut(e);
            }
            let p = &l.0;
            m.tokens = quote!(#p);
        } else if let Ok(mut r) = parse2::<ExprRep>(m.tokens.clone()) {
            self.visit_expr_mut(&mut r.0);
            self.visit_expr_mut(&mut r.1);
            let (a, b) = (&r.0, &r.1);
            m.tokens = quote!(#a; #b);
        }
    }
}

fn main() {
    // The transpiler's output order varies: in coverage names, only names of items and counters
    // within a function are used.
    let cov = std::env::args().any(|a| a == "--cov");
    for f in std::env::args().skip(1).filter(|a| a != "--cov") {
        let src = std::fs::read_to_string(&f).unwrap();
        let mut file = match parse_file(&src) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("{f}: {e}");
                std::process::exit(2)
            }
        };
        let stem = std::path::Path::new(&f).file_stem().unwrap().to_string_lossy().into_owned();
        let mut rw = Rw { cov, file: stem, ..Default::default() };
        rw.visit_file_mut(&mut file);
        if cov {
            let n = rw.sites;
            file.items.push(parse_quote!(pub const COV_SITES: usize = #n;));
        }
        let out = prettyplease::unparse(&file);
        if out != src {
            std::fs::write(&f, out).unwrap();
        }
        eprintln!("{f}: {} literal patterns, {} byte types/constructions", rw.lits, rw.bytes);
    }
}
